"""P26: the authorities describe themselves and their trusted peers truthfully."""
import issue
import session
from session import *


def attribute_side(ck, r):
    """An attribute authority of any settings and key, asked before and after requests, refusals, restarts and changes of settings."""
    x = issue.setup(ck, r, ['info', 'sign'], users=2, atts=2)
    for _ in range(r.choice([2, 4])):
        k = r.random()
        if k < .4:
            x.info()
        elif k < .6:
            x.request(x.names[0], x.pws[0])
        elif k < .7:
            x.request(x.names[0], 'wrong')
        else:
            s = issue.settings(r)
            x.restart(**{q: s[q] for q in r.sample(sorted(s), r.choice([1, 3, 7]))})
            x.info()
    x.info()
    x.request(x.names[1], x.pws[1])
    return x.case()


URLS = ['http://x/', '', 'https://a.example:8443/AttributeAuthority/jsonwsp/', '\u4e16', 'x' * 80]


def someone(r, n):
    k = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
    u = r.choice(UIDS + ['urn:%d' % n])
    return entry(u, k, r.choice([-1, 0, 1, 5, 100, 2**31 - 1]), name=r.choice(['A', '', 'caf\xe9', 'name of ' + u, 'x' * 60]), url=r.choice(URLS), cipher=r.choice(['RSA', 'DSA', '']),
                 size=r.choice([1024, 2048, 4096, 0]), pub=r.choice([pem(k).decode(), 'not a key', '', pem(k).decode() + '\n']))


def policy_side(ck, r):
    """A policy authority of any settings, its registry growing, shrinking and changing; sessions in between."""
    reg = []
    for n in range(r.choice([0, 1, 3, 6])):
        e = someone(r, n)
        if e['uid'] not in [x['uid'] for x in reg]:
            reg.append(e)

    def conf():
        return {'name': r.choice(['pa', '', 'A B', '\u4e16', "o'x"]), 'uid': r.choice(['urn:pa', 'x', 'a\xe9']), 'host': r.choice(['', ' ', 'example.org', '10.1.2.3', '   ']), 'port': r.choice(['8888', '80', '1'])}
    p = PA(ck, reg, ['info'], conf=conf(), level=r.choice(['DEBUG', 'ERROR']))
    p.info()
    p.list()
    for n in range(r.choice([3, 6])):
        k = r.random()
        if k < .25:
            e = someone(r, 100 + n)
            if e['uid'] not in [x['uid'] for x in p.reg]:
                p.reg.insert(r.randrange(len(p.reg) + 1), e)
            p.registry()
        elif k < .4 and p.reg:
            p.reg.pop(r.randrange(len(p.reg)))
            p.registry()
        elif k < .6 and p.reg:
            e = r.choice(p.reg)
            f = r.choice(['trust', 'name', 'url', 'pub', 'size', 'cipher'])
            e[f] = someone(r, n)[f]
            p.registry()
        elif k < .7 and len(p.reg) > 1:
            a, b = r.sample(p.reg, 2)
            f = r.choice(['trust', 'name', 'url', 'pub', 'size', 'cipher'])
            a[f], b[f] = b[f], a[f]
            p.registry()
        elif k < .8:
            c = conf()
            p.restart(**{q: c[q] for q in r.sample(sorted(c), r.choice([0, 1, 4]))})
            p.info()
        elif k < .9:
            p.start([])
        else:
            p.info()
        p.list()
    p.info()
    return p.case()


def often(ck, r):
    """Asked again and again it keeps answering."""
    p = PA(ck, [entry('urn:aa', 1, 1)], ['info'])
    for i in range(25):
        p.list()
        if i % 9 == 0:
            p.info()
    p.reg.append(entry('urn:bb', 2, 0))
    p.registry()
    p.list()
    return p.case()


def run(ck):
    r = ck.rng
    cases = [attribute_side(ck, r) for _ in range(ck.pick(150, 3000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceIssue', cases[i:i + 1000], issue.describe, what='attribute authorities of any settings telling about themselves')
    cases = [policy_side(ck, r) for _ in range(ck.pick(200, 5000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceSession', cases[i:i + 1000], session.describe, what='policy authorities, their settings and registries')
    ck.validate('TraceSession', [often(ck, r) for _ in range(ck.pick(3, 30))], session.describe, what='asked over and over')

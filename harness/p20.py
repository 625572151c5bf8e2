"""P20: issued certificates are signed, bound to holder and key, fresh and timed."""
from issue import *
ASP = ['sign']


def frame(ck, r):
    """Any settings, key, holder, moment; restarts with other settings; the clock moving during the request."""
    x = setup(ck, r, ASP, users=2, atts=2)
    for _ in range(r.choice([2, 3, 5])):
        k = r.random()
        if k < .3:
            s = settings(r)
            x.restart(**{q: s[q] for q in r.sample(sorted(s), r.choice([0, 1, 3, 7]))})
        elif k < .4:
            CLOCK.now = float(moment(r))
        u = r.randrange(2)
        CLOCK.now = int(CLOCK.now) + r.choice([0, .25, .5, .999])
        a = args(x, r)
        a['tick'] = r.choice([0, 0, .001, .05, .4, 1])
        if r.random() < .15:
            a.update(at=r.choice(['public_key', 'key_size', 'cipher', 'password']), meanwhile=lambda: x.request(x.names[1 - u], x.pws[1 - u], **args(x, r)))
        x.request(case_of(r, x.names[u]), x.pws[u], *form(x, r, r.choice([1, 2, 3, 7])), **a)
    return x.case()


def many(ck, r, n):
    """Many certificates in a row, in one second, by one user and key: all serials are new."""
    x = setup(ck, r, ASP, users=2, atts=1, conf=dict(settings(r), key=1))
    for i in range(n):
        x.request(x.names[0], x.pws[0], key=b'K', remote={'remote_addr': '10.0.0.1'}, ids=[x.atts[0][0]])
        if i == n // 2:
            x.restart()
    return x.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 220, 25, 8000)
    cases = [frame(ck, r) for _ in range(ck.pick(130, 4000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceIssue', cases[i:i + 1000], describe, what='any settings, keys, holders and moments')
    ck.validate('TraceIssue', [many(ck, r, ck.pick(24, 100)) for _ in range(ck.pick(3, 40))], describe, what='many certificates in a row')

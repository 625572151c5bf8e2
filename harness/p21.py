"""P21: connection attributes state the facts of the connection."""
from issue import *
import calendar
ASP = ['con']


def v4(r):
    return '.'.join(str(r.choice([0, 1, 9, 10, 99, 100, 127, 128, 255, r.randrange(256)])) for _ in range(4))


def v6(r):
    h = [r.choice([0, 0, 0, 1, 0xa, 0x10, 0xff, 0x100, 0xffff, r.randrange(65536)]) for _ in range(8)]
    f = r.choice(['%x', '%X', '%04x', '%04X'])
    p = [f % y for y in h]
    k = r.random()
    out = ':'.join(p)
    if k < .5:                                          # leave out a run of zeros
        i = r.randrange(8)
        j = r.randrange(i + 1, 9)
        if all(y == 0 for y in h[i:j]):
            out = ':'.join(p[:i]) + '::' + ':'.join(p[j:])
        elif r.random() < .7:
            for q in range(i, j):
                h[q] = 0
            out = ':'.join(p[:i]) + '::' + ':'.join(p[j:])
    elif k < .65:                                       # the last 32 bits as four octets
        out = ':'.join(p[:6]) + ':' + v4(r)
        if all(y == 0 for y in h[:5]):
            out = '::' + p[5] + ':' + v4(r)
    elif k < .75:
        out = r.choice(['::', '::1', '1::', '::ffff:' + v4(r), '::' + v4(r), '64:ff9b::' + v4(r)])
    if r.random() < .2:
        out += '%' + r.choice(['eth0', '1', 'en.0', 'a-b'])
    return out


def instants(r, n):
    """Around the turns of seconds, minutes, hours, days, months, years, leap days."""
    out = []
    for _ in range(n):
        y = r.choice([1999, 2000, 2001, 2004, 2016, 2019, 2020, 2023, 2024, 2028, 2036, r.randrange(1970, 2037)])
        m = r.randrange(1, 13)
        t = calendar.timegm((y, m, 1, 0, 0, 0))
        k = r.random()
        out.append(t + r.choice([-1, 0, 1, 59, 60, 3599, 3600, 86399, 86400]) if k < .4 else calendar.timegm((y, 2, 28, 23, 59, 59)) + r.choice([0, 1, 86400, 86401]) if k < .55
                   else calendar.timegm((y, 12, 31, 23, 59, 59)) + r.choice([0, 1]) if k < .7 else t + r.randrange(86400 * 28))
    return [max(1, min(t, 2**31 - 2 * 10**7)) for t in out]


def facts(ck, r, n):
    x = setup(ck, r, ASP, users=2, atts=2)
    for t in instants(r, n):
        CLOCK.now = t + r.choice([0, 0, .5, .999])
        if r.random() < .15:
            x.restart(**settings(r))
        a = args(x, r)
        a['remote'] = dict(remote(r), remote_addr=r.choice([v4, v6, v6, lambda r: r.choice(['unix', 'localhost', 'x', 'host-1'])])(r))
        a['tick'] = r.choice([0, 0, 0, .001, .3])
        x.request(case_of(r, x.names[0]), x.pws[0], *form(x, r, r.choice([1, 2, 3])), **a)
    return x.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 150, 20, 5000)
    cases = [facts(ck, r, 4) for _ in range(ck.pick(110, 4000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceIssue', cases[i:i + 1000], describe, what='addresses, calendar, keys, settings')

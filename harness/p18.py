"""P18: certificates are issued only for correct credentials, and refused otherwise."""
from issue import *
import gc, unicodedata
ASP = ['auth']
ALIKE = [('strasse', 'stra\xdfe'), ('strasse', 'STRA\u1e9eE'), ('office', 'o\ufb03ce'), ('dan', '\uff44an'), ('eve', 'ev\xe9'), ('jos\xe9', 'jose'), ('jos\xe9', 'jose\u0301'), ('x', '\u2179'), ('danr', 'danr\u200b'), ('danr', 'danr\x00'), ('user_1', 'user-1')]


def words(r, w):
    """Passwords next to w, none of them w."""
    out = {w + ' ', ' ' + w, w + 'pepper', w[:-1], w + 'x', w.upper(), w.lower(), w.swapcase(), '', 'None', 'pepper', w * 2 or 'x', 'z' * 73, 'z' * 200, '\ud800', w + '\ud800',
           '%s', '$2b$04$', w[::-1] or 'y', 'x' * 72, '\u4e16' * 30, 'pepper' + w}
    out |= {''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' else c for c in w), unicodedata.normalize('NFD', w), unicodedata.normalize('NFKC', w), w + '\x00', '\t' + w + '\n', w.replace('0', 'o')}
    return sorted(x for x in out if x != w)


def longest(ck, r, level):
    """Passwords as long as they can be, and ones that begin like them."""
    x = setup(ck, r, ASP, users=3, level=level)
    n = 72 - len(x.pepper)
    base = ''.join(r.choice('abcdefgh') for _ in range(80))
    x.pws = [base[:n], base[:n - 1], base[:5]]
    x.accounts = list(zip(x.names, x.pws))
    x.change()
    for i, w in enumerate(x.pws):
        gs = {w + x.pepper, w + x.pepper + 'x', w + 'x', w[:-1], w[:-1] + 'z', w + base[len(w):], w + '\x00', w[:-1] + '\x00', base, base[:40], w + '\x00' + w, w + x.pepper + '\x00' + w} - {w}
        for g in r.sample(sorted(gs), len(gs)):
            x.request(x.names[i], g, remote={'remote_addr': '10.0.0.1'})
        x.request(case_of(r, x.names[i]), w)
    return x.case()


def guesses(ck, r, level):
    """Every near miss, for an account, for a name nobody has, and for the other account; in between correct ones."""
    x = setup(ck, r, ASP, users=3, level=level)
    w = x.pws[0]
    ws = words(r, w)
    r.shuffle(ws)
    for g in ws[:12]:
        who = [case_of(r, x.names[0]), r.choice([s for s in STRANGE if s not in x.names])]
        if g not in x.pws:
            who.append(x.names[1])
        elif g in x.pws[1:]:
            who.append(x.names[0])
        for n in who:
            x.request(n, g, key=b'k', remote={'remote_addr': '10.0.0.1'})
    x.request(case_of(r, x.names[0]), w)
    for t in (1, -1, 2, 2**31 - 1):
        for n in (x.names[0], 'nobody'):
            x.request(n, w, type=t)
    for n in (x.names[0], 'nobody'):
        x.request(n, None)
    x.request(None, w)
    for n, f in ALIKE:                            # names that some ways of comparing take for that of an account
        if n in x.names:
            x.request(f, x.pws[x.names.index(n)])
    x.request(x.names[0], x.pws[1])
    x.request(x.names[1], x.pws[0])
    x.request('nobody', x.pws[0])
    x.request(case_of(r, x.names[1]), x.pws[1])
    return x.case()


def changes(ck, r):
    """Passwords and accounts change while the authority runs: the present ones count."""
    x = setup(ck, r, ASP, users=3)
    pw = list(x.pws)
    for _ in range(6):
        k = r.choice(['swap', 'new', 'gone', 'rename', 'restart', 'fail'])
        if k == 'swap':
            pw[0], pw[1] = pw[1], pw[0]
        elif k == 'new':
            pw[r.randrange(len(pw))] = r.choice([p for p in PASSWORDS if p not in pw])
        elif k == 'gone' and len(x.names) == 3:
            keep = x.names
            x.names, pw = [keep[0], keep[1]], pw[:2]
        elif k == 'rename':
            x.names[0] = r.choice([n for n in NAMES if n not in x.names])
        elif k == 'restart':
            x.restart()
            continue
        elif k == 'fail':
            x.request(x.names[0], pw[0], ids=['not mine'])
            continue
        x.accounts = list(zip(x.names, pw))
        x.assign = [a for a in x.assign if a[0] <= len(x.names)]
        x.change()
        for n in range(len(x.names)):
            for p in pw + x.pws:
                if r.random() < .5:
                    x.request(case_of(r, x.names[n]), p, remote={'remote_addr': '10.0.0.1'})
    return x.case()


def lasting(ck, r):
    """Many requests in a row, refused in every way: the authority keeps serving."""
    x = setup(ck, r, ASP, users=2)
    gc.collect()
    gc.disable()                     # nothing the garbage collector happens to do in time can be relied on
    for i in range(40):
        k = r.choice(['wrong', 'stranger', 'type', 'unassigned', 'right'])
        x.request('nobody' if k == 'stranger' else x.names[0], 'wrong' if k == 'wrong' else x.pws[0], ids=['none'] if k == 'unassigned' else [x.atts[0][0]], type=7 if k == 'type' else 0)
    x.request(x.names[0], x.pws[0])
    gc.enable()
    return x.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 250, 25, 12000)
    cases = [guesses(ck, r, lv) for lv in ('DEBUG', 'INFO', 'ERROR') * ck.pick(5, 100)]
    ck.validate('TraceIssue', cases, describe, what='passwords next to the right one, for accounts and strangers')
    ck.validate('TraceIssue', [longest(ck, r, lv) for lv in ('DEBUG', 'ERROR') * ck.pick(3, 60)], describe, what='passwords as long as they can be, and ones that begin like them')
    cases = [changes(ck, r) for _ in range(ck.pick(12, 300))]
    ck.validate('TraceIssue', cases, describe, what='accounts and passwords changing in between')
    ck.validate('TraceIssue', [lasting(ck, r) for _ in range(ck.pick(2, 30))], describe, what='many refused requests in a row')

"""P19: issued certificates carry exactly the requested attributes assigned to the user."""
from issue import *
ASP = ['atts']


def wild(ck, r):
    """Any attributes (also sharing names), any assignments, any lists, changing in between."""
    users, n = r.choice([1, 2, 3]), r.choice([1, 3, 6, 10])
    atts = r.sample(ATTS, n)
    if r.random() < .4 and n > 2:                      # two attributes of one name
        atts[1] = (atts[1][0], atts[0][1], r.choice(TYPES))
    names, pws = r.sample(NAMES, users), r.sample(PASSWORDS, users)

    def some():
        return [(u + 1, a[0], r.choice([None] + VALUES)) for u in range(users) for a in atts if r.random() < .6]
    x = AA(ck, settings(r), list(zip(names, pws)), atts, some(), ASP, clock=moment(r))
    for _ in range(r.choice([2, 4, 7])):
        k = r.random()
        if k < .2:
            x.assign = some()
            x.change()
        elif k < .3:
            i = r.randrange(n)
            x.atts[i] = (x.atts[i][0], r.choice([a[1] for a in ATTS]), r.choice(TYPES))
            x.change()
        elif k < .35:
            x.restart()
        u = r.randrange(users)
        mine = [a for a in x.atts if any(q[0] == u + 1 and q[1] == a[0] for q in x.assign)]
        pool = mine if mine and r.random() < .8 else list(x.atts)

        def lst(f):
            out = []
            for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
                p = r.random()
                out.append(r.choice([None, '', '*']) if p < .2 else r.choice(['no such', 'Age', 'AGE', 'age', '%', '* ', ' ', r.choice(ATTS)[f]]) if p < .25
                           else r.choice(pool)[f].upper() if p < .28 else r.choice(pool)[1 - f] if p < .31 else r.choice(pool)[f])
            return out

        def req(u, **more):
            return x.request(case_of(r, names[u]), pws[u], lst(0), lst(1), remote={'remote_addr': '10.0.0.1'}, **more)
        if r.random() < .2 and users > 1:
            req(u, at=r.choice(['public_key', 'key_size', 'attribute_ids', 'attribute_names', 'password']), meanwhile=lambda: req((u + 1) % users))
        else:
            req(u)
    return x.case()




def run(ck):
    r = ck.rng
    histories(ck, ASP, 250, 25, 12000)
    cases = [wild(ck, r) for _ in range(ck.pick(170, 6000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceIssue', cases[i:i + 1000], describe, what='any attributes, assignments and lists')

import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, gtgen, gtcheck


def gens(rng, n, **kw):
    G = []
    for k in range(n):
        g = gtgen.Gen(rng, **kw)
        g.c['allow'] = rng.random() < .6
        if rng.random() < .3:
            g.c['restart'] = rng.choice([2, 4, 5, 7])
        fs = [g.field(rng.choice([0, 1, 2, 3])) for _ in range(g.nops)]
        skip = 'S' if rng.random() < .4 else ''
        a = [g.F(fs), ['I' + skip]] + ([['M']] if not skip else [])
        for _ in range(rng.choice([2, 3, 4])):
            m = rng.random()
            if m < .75:
                fs = [g.move(x) for x in fs]
            if m > .65:   # nucleation
                x = g.field(1)
                b = rng.randrange(g.nops)
                for k2, v in x.items():
                    fs[b].setdefault(k2, v)
            elif m < .1:  # everything vanishes in one field
                fs[rng.randrange(g.nops)] = {}
            if not skip or rng.random() < .7:
                a += [g.F(fs)]
            a += [['T' + skip]] + ([['M']] if not skip else [])
        g.c['acts'] = a
        G.append(g.c)
    return G


def check(c):
    exe = c.build('h_tracker')
    for np, q, t in ((None, 500, 5000), (3, 200, 2500)):
        gtcheck.run(c, exe, gens(c.rng, c.pick(q, t)), ['ids', 'refuse'], 'histories', np=np, corrupt=gtcheck.corrupt_ids)
    gtcheck.design(c, *c.pick((4, 2), (5, 2)))
    if c.thorough:
        gtcheck.design(c, 4, 3)
        gtcheck.design(c, 4, 2, 'FALSE')
    gtcheck.run(c, exe, gtcheck.model_histories(c, c.pick(400, 6000), allow=c.rng.random() < .5), ['ids', 'refuse', 'detect'],
                'behaviours of GrainTracker.tla', corrupt=gtcheck.corrupt_ids)
    c.assumptions += ['matches closer than the resolution of the specification (0.06 of the finest cell) count as ties']


vf.main(check, 'C06')

import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, gtgen, gtcheck


def gens(rng, n, **kw):
    G = []
    for k in range(n):
        g = gtgen.Gen(rng, nops=rng.choice([1, 2, 3, 4, 6]), **kw)
        g.c.update(allow=rng.random() < .6, greedy=rng.random() < .4, fast=rng.random() < .5,
                   maxops=rng.choice([20, 20, 4, 3, 2]), ratio=rng.choice([0, 50, 50, 200, 500]), fixed=rng.choice([0, 0, 1000, 3000]))
        fs = [g.field(rng.choice([0, 1, 2, 2, 4])) for _ in range(g.nops)]
        a = [g.F(fs), [rng.choice(['I', 'I', 'I', 'IS'])], ['M']]
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .8:
                fs = [g.move(x) for x in fs]
                a += [g.F(fs)]
            a += [[rng.choice(['T', 'T', 'T', 'TS'])], ['M']]
        g.c['acts'] = a
        G.append(g.c)
    return G


def crowded(rng, n):
    """Many grains closer than the buffer and barely enough order parameters: the heuristic has to give up in time."""
    G = []
    for k in range(n):
        nops = rng.choice([1, 1, 2, 3])
        g = gtgen.Gen(rng, dim=2, per=False, nops=nops, rep=[rng.choice([4, 5]), rng.choice([3, 4])], repr=rng.choice([0, 0, 0, 2]), thr=10)
        g.c['ref'] = []
        g.L = [4 * x for x in g.c['rep']]
        fs = [{} for _ in range(nops)]
        spots = [(4 * x, 4 * y) for x in range(0, g.c['rep'][0] + 1) for y in range(0, g.c['rep'][1] + 1)]
        rng.shuffle(spots)
        for i, q in enumerate(spots[:rng.choice([3, 4, 5, 6, 8])]):
            fs[rng.randrange(nops)][q] = 600 + i
        g.c.update(allow=True, greedy=rng.random() < .4, fast=rng.random() < .7, maxops=max(nops, rng.choice([2, 2, 3, 3, 4, 5])),
                   ratio=rng.choice([0, 0, 100, 300]), fixed=rng.choice([0, 500, 1500, 4000, 9000]))
        a = [g.F(fs), ['I'], ['M']]
        if rng.random() < .4:
            fs = [g.move(x) for x in fs]
            a += [g.F(fs), ['T'], ['M']]
        g.c['acts'] = a
        G.append(g.c)
    return G


def check(c):
    exe = c.build('h_tracker')
    gtcheck.run(c, exe, crowded(c.rng, c.pick(400, 5000)), ['reassign'], 'crowded grains', corrupt=gtcheck.corrupt_reassign)
    for np, q, t in ((None, 500, 6000), (3, 200, 2500)):
        gtcheck.run(c, exe, gens(c.rng, c.pick(q, t)), ['reassign'], 'reassignment', np=np, corrupt=gtcheck.corrupt_reassign)
    c.assumptions += ['distances within 0.07 of the finest cell of the buffer width may be judged either way']


vf.main(check, 'C03')

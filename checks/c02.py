import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, gtgen, gtcheck


def exhaustive(rng, n):
    """Every assignment of four mutually overlapping grains to five order parameters, and
    every assignment of five grains in a row."""
    G = []
    A = list(itertools.product(range(5), repeat=4))
    rng.shuffle(A)
    for j, a in enumerate(A[:n]):
        g = gtgen.Gen(rng, dim=2, per=False, nops=4, repr=0, thr=10, thrnew=10, rep=[4, 4], allow=True)
        g.c['ref'] = [[[7, 7], [9, 9]]] if j % 2 else []
        g.L = [16, 16]
        if j % 3 == 0:    # a row: only neighbours share cells
            fs = [{(4 * b + x, y): 600 + b for x in range(0, 3) for y in range(0, 17)} for b in range(4)]
        else:
            fs = [{(x, y): 600 + b * 50 + x for x in range(6 - b % 2, 9 + b) for y in range(5 + b, 12)} for b in range(4)]
        g.c['acts'] = [g.F(fs), ['IS'], ['C', list(enumerate(a))], ['M']]
        G.append(g.c)
    return G


def gens(rng, n, **kw):
    G = []
    for k in range(n):
        g = gtgen.Gen(rng, nops=rng.choice([2, 3, 4]), **kw)
        g.c['allow'] = rng.random() < .7
        fs = [g.field(rng.choice([0, 1, 2, 3])) for _ in range(g.nops)]
        a = [g.F(fs), ['IS']]
        for _ in range(rng.choice([1, 2])):
            n_ops = g.nops + rng.choice([0, 0, 1, 2])
            if rng.random() < .6:
                a += [['C', [(i, rng.randrange(n_ops)) for i in range(12) if rng.random() < .7]]]
            else:
                a[-1] = [a[-1][0][0]]
            a += [['M']]
            fs = [g.move(x) for x in fs]
            a += [g.F(fs) if rng.random() < .5 else g.F(fs), ['TS']]
        a += [['C', [(i, rng.randrange(g.nops + 1)) for i in range(12)]], ['M']]
        g.c['acts'] = a
        G.append(g.c)
    return G


def check(c):
    exe = c.build('h_tracker')
    gtcheck.run(c, exe, exhaustive(c.rng, c.pick(300, 625)), ['remap'], 'every assignment of four overlapping grains',
                corrupt=gtcheck.corrupt_remap)
    for np, q, t in ((None, 350, 5000), (2, 150, 1500), (3, 150, 2500)):
        gtcheck.run(c, exe, gens(c.rng, c.pick(q, t)), ['remap'], 'remapping', np=np, corrupt=gtcheck.corrupt_remap)
    gtcheck.design(c, *c.pick((4, 2), (5, 2)))
    if c.thorough:
        gtcheck.design(c, 4, 3)
        gtcheck.design(c, 4, 2, 'FALSE')
    gtcheck.run(c, exe, gtcheck.model_histories(c, c.pick(400, 6000)), ['remap', 'detect'],
                'behaviours of GrainTracker.tla', corrupt=gtcheck.corrupt_remap)
    c.assumptions += ['assignments in which two grains sharing a cell would end up in the same field are not judged (the tracker never produces them)']


vf.main(check, 'C02')

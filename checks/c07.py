import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, gtgen, gtcheck


def gens(rng, n, **kw):
    G = []
    for k in range(n):
        g = gtgen.Gen(rng, per=True, **kw)
        g.c['allow'] = True
        fs = [g.field(rng.choice([1, 2, 3, 4])) for _ in range(g.nops)]
        # pieces on the faces, so that chains of periodic contacts arise
        for f in fs:
            for _ in range(rng.choice([0, 1, 2, 3])):
                p = [rng.randrange(0, l + 1) for l in g.L]
                d = rng.randrange(g.dim)
                p[d] = rng.choice([0, g.L[d]])
                w = rng.choice([0, 2, 4])
                for q in gtgen.box_points(g.dim, p, [min(x + w, l) for x, l in zip(p, g.L)]):
                    f[q] = 700
        a = [g.F(fs), ['IS']]
        if rng.random() < .3:
            a += [g.F([g.move(x) for x in fs]), ['TS']]
        g.c['acts'] = a
        G.append(g.c)
    return G


def frames(rng, n):
    """All on/off patterns of the boundary nodes of a 3x3 periodic mesh."""
    G = []
    pts = [(x, y) for x in (0, 4, 8, 12) for y in (0, 4, 8, 12) if x in (0, 12) or y in (0, 12)]
    masks = list(range(1, 1 << len(pts)))
    rng.shuffle(masks)
    for m in masks[:n]:
        g = gtgen.Gen(rng, dim=2, per=True, nops=1, repr=0, thr=10, thrnew=10, rep=[3, 3], allow=True)
        g.c['ref'] = []
        g.L = [12, 12]
        # values live on one representative of every periodic node
        g.c['acts'] = [['F', [[(p, 512) for i, p in enumerate(pts) if m >> i & 1]]], ['IS']]
        G.append(g.c)
    return G


def check(c):
    exe = c.build('h_tracker')
    gtcheck.run(c, exe, frames(c.rng, c.pick(300, 4095)), ['detect'], 'every boundary pattern on a periodic mesh',
                corrupt=gtcheck.corrupt_detect)
    for np, q, t in ((None, 250, 3000), (2, 150, 1500), (3, 150, 2000), (5, 0, 600)):
        n = c.pick(q, t)
        if n:
            gtcheck.run(c, exe, gens(c.rng, n), ['detect'], 'periodic detection', np=np, corrupt=gtcheck.corrupt_detect)
    c.assumptions += ['periodicity in all directions, as the application configures it']


vf.main(check, 'C07')

import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, gtgen, gtcheck


def gens(rng, n, **kw):
    G = []
    for k in range(n):
        g = gtgen.Gen(rng, **kw)
        g.c['allow'] = True
        g.c['thrnew'] = rng.choice([g.c['thr'], g.c['thrnew']])
        fs = [g.field(rng.choice([0, 1, 2, 3, 4])) for _ in range(g.nops)]
        a = [g.F(fs), ['IS']]
        if rng.random() < .3:
            a += [g.F([g.move(x) for x in fs]), ['TS']]
        g.c['acts'] = a
        G.append(g.c)
    return G


def strips(rng, n):
    """All on/off patterns of the nodes of a tiny mesh with one refined cell."""
    G = []
    pts = [(x, y) for x in (0, 4, 8) for y in (0, 4, 8)] + [(2, 0), (0, 2), (2, 2)]
    masks = list(range(1 << len(pts)))
    rng.shuffle(masks)
    for m in masks[:n]:
        g = gtgen.Gen(rng, dim=2, per=False, nops=1, repr=0, thr=10, thrnew=10, rep=[2, 2], allow=True)
        g.c['ref'] = [[[3, 3]]]
        g.L = [8, 8]
        g.c['acts'] = [['F', [[(p, 512 + 64 * i) for i, p in enumerate(pts) if m >> i & 1]]], ['IS']]
        G.append(g.c)
    return G


def check(c):
    exe = c.build('h_tracker')
    gtcheck.run(c, exe, strips(c.rng, c.pick(300, 4096)), ['detect'], 'every pattern on a small adaptive mesh',
                corrupt=gtcheck.corrupt_detect)
    for np, q, t in ((None, 250, 3000), (2, 150, 1500), (3, 150, 2000), (5, 0, 600)):
        n = c.pick(q, t)
        if n:
            gtcheck.run(c, exe, gens(c.rng, n, per=False), ['detect'], 'detection', np=np, corrupt=gtcheck.corrupt_detect)
    c.assumptions += ['nodal values are multiples of 1/1024 on lattice meshes with up to two levels of local refinement; centres compared to 0.02, radii to 0.04 of the finest cell size']


vf.main(check, 'C05')

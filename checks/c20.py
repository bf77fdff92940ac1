import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf




def case(ctor, ext, pts, q):
    return ({'ext': bool(ext), 'pts': pts, 'q': q},
            ' '.join(map(str, ['P', ctor, int(ext), len(pts)] + sum(pts, []) + [len(q)] + q)))


def rnd(rng):
    ctor = rng.randrange(2)
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    xs = rng.sample(range(-10, 15), n)
    pts = [[x, rng.randrange(-20, 20)] for x in xs]
    ext = rng.random() < .5
    if not ctor and n > 2 and rng.random() < .3:
        # a jump strictly inside the table
        s = sorted(xs)
        pts.append([s[rng.randrange(1, n - 1)], rng.randrange(-20, 20)])
    q = [rng.choice([4 * x for x in xs] or [0]) if rng.random() < .4 else rng.randrange(-50, 70) for _ in range(12)]
    return case(ctor, ext, pts, q)


def corrupt(r, rng):
    r['y'][rng.randrange(len(r['y']))] += 5
    return r


def check(c):
    exe = c.build('h_misc')
    # every table of up to three points on a small grid
    cs = []
    for n in (0, 1, 2, 3):
        for xs in itertools.permutations((0, 1, 3), n):
            for ys in itertools.product((0, 2, -1), repeat=n):
                for ext in (0, 1):
                    cs.append(case(c.rng.randrange(2), ext, [list(p) for p in zip(xs, ys)], [-4, -1, 0, 1, 3, 4, 5, 8, 11, 12, 13, 20]))
    c.functional('PiecewiseCases', exe, cs + [rnd(c.rng) for _ in range(c.pick(2000, 20000))], label='piecewise functions', corrupt=corrupt, nchunks=8)


vf.main(check, 'C20')

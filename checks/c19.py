import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf




def rnd(rng):
    dim = rng.choice([2, 3])
    lo = [rng.randrange(-4, 4) for _ in range(dim)]
    hi = [x + rng.randrange(1, 6) for x in lo]

    def coord(d):
        return rng.choice([2 * lo[d], 2 * hi[d], 2 * lo[d] - 1, 2 * hi[d] + 1, rng.randrange(2 * lo[d] - 3, 2 * hi[d] + 4), rng.randrange(2 * lo[d], 2 * hi[d] + 1)])
    pts = [[coord(d) for d in range(dim)] for _ in range(12)]
    cells = [[coord(d) for d in range(dim)] + [rng.choice([1, 1, 2, 3, 8])] for _ in range(6)]
    lines = []
    for _ in range(6):
        e = rng.randrange(dim)
        d = rng.choice([1, 2, 4, 8, -1, -2, 0])
        p0 = [rng.randrange(-9, 9) for _ in range(dim)]
        p1 = [rng.randrange(-9, 9) for _ in range(dim)]
        p1[e] = p0[e] + d
        lines.append({'p0': p0, 'p1': p1, 'o': [rng.randrange(-9, 9) for _ in range(dim)], 'e': e, 'n': rng.choice([1, -1])})
    t = ['B%d' % dim] + lo + hi + [len(pts)] + sum(pts, []) + [len(cells)] + sum(cells, []) + [len(lines)]
    for q in lines:
        t += q['p0'] + q['p1'] + q['o'] + [q['e'], q['n']]
    return {'dim': dim, 'lo': lo, 'hi': hi, 'pts': pts, 'cells': cells, 'lines': lines}, ' '.join(map(str, t))


def corrupt(r, rng):
    k = rng.choice(['pos', 'flags', 'filt', 'hit'])
    i = rng.randrange(len(r[k]))
    r[k][i] = 1 - r[k][i] if k != 'flags' else r[k][i] ^ rng.choice([1, 2, 4, 8, 16])
    return r if k != 'pos' else r


def check(c):
    exe = c.build('h_misc')
    c.functional('BBoxCases', exe, [rnd(c.rng) for _ in range(c.pick(1200, 15000))], label='bounding box', corrupt=corrupt, nchunks=8)


vf.main(check, 'C19')

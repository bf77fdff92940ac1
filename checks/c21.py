import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 L = %d
 MaxP = %d
 Radii = {%s}
 B2 = %d
 U = 1
INVARIANT Apart
INVARIANT Few
INVARIANT Cut
INVARIANT Disjoint
'''
# r1, distance to neck, distance of the other center from the neck, r2
NECKS = [(5, 4, 4, 5), (10, 8, 8, 10), (13, 5, 9, 15), (20, 16, 5, 13), (13, 12, 12, 13), (17, 15, 6, 10), (25, 7, 7, 25), (10, 6, 15, 17), (25, 20, 8, 17), (15, 12, 12, 15)]
DIRS2 = [((1, 0, 0), 1), ((0, 1, 0), 1), ((3, 4, 0), 5), ((-4, 3, 0), 5)]
DIRS3 = DIRS2 + [((0, 0, 1), 1), ((1, 2, 2), 3), ((2, 3, 6), 7), ((0, 3, -4), 5), ((-2, 2, 1), 3)]


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def cloud(rng, dim):
    P = []
    base = [rng.choice([0, 0, 10, 40, -60, -200]) for _ in range(3)]
    if rng.random() < .3:
        base = [-400, -300, -250]
    if dim == 2:
        base[2] = 0

    # first center on a ray from the origin
    line = (rng.choice(DIRS2 if dim == 2 else DIRS3)[0], rng.randint(-30, 30)) if rng.random() < .3 else None

    def ok(c, r):
        # no particle inside another, no coinciding centers
        return all(d2(c, q[0]) > (r - q[1]) ** 2 for q in P)
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        D = 0
        for _try in range(30):
            if P and rng.random() < .6:
                (c, r), (v, m) = rng.choice(P), rng.choice(DIRS2 if dim == 2 else DIRS3)
                s = rng.choice([-1, 1])
                nk = [x for x in NECKS if x[0] == r and (x[1] + x[2]) % m == 0]
                if nk and rng.random() < .7:
                    q = rng.choice(nk)
                    D, r2 = q[1] + q[2], q[3]
                else:
                    r2 = rng.choice([3, 5, 10, 13, 15])
                    D = (r + r2 + rng.choice([-3, -2, -1, 0, 1, 2, 4, 6, 12, 13])) // m * m
                c2 = [c[k] + s * v[k] * (D // m) for k in range(3)]
            else:
                r2 = rng.choice([2, 5, 10, 13, 20, 25])
                c2 = [base[k] + rng.randint(0, 70) for k in range(dim)] + [0] * (3 - dim)
                if line:
                    c2 = [line[1] * x for x in line[0]]
            if D0(P, c2) and ok(c2, r2):
                P.append((c2, r2))
                break
    u = rng.choice([1, 1, 2, 3])
    pts = []
    for c, r in P:
        pts.append(c)
        for _ in range(5):
            (v, m), s = rng.choice(DIRS2 if dim == 2 else DIRS3), rng.choice([-1, 1])
            k = (r + rng.choice([-4 * u, -2 * u, -u, 0, u, 2 * u, 4 * u, rng.randint(-r, r)])) // m
            pts.append([c[e] + s * k * v[e] for e in range(3)])
        for _ in range(3):
            pts.append([c[e] + (rng.randint(-r - 3, r + 3) if e < dim else 0) for e in range(3)])
    for i in range(len(P)):
        for j in range(len(P)):
            n = d2(P[i][0], P[j][0])
            m = int(n ** .5 + .5)
            if i != j and m * m == n and n <= (P[i][1] + P[j][1]) ** 2:
                g = [(P[j][0][e] - P[i][0][e]) for e in range(3)]
                X = n + P[i][1] ** 2 - P[j][1] ** 2
                for k in (-2 * u, -u, 0, u, 2 * u, 3 * u):
                    a = X + 2 * m * k
                    if all(a * g[e] % (2 * n) == 0 for e in range(3)):
                        pts.append([P[i][0][e] + a * g[e] // (2 * n) for e in range(3)])
    if dim == 2:
        pts = [[p[0], p[1], 0] for p in pts]
    rng.shuffle(pts)
    pts = pts[:40]
    d = {'kind': 'cloud', 'dim': dim, 'P': [{'c': c, 'r': r} for c, r in P], 'u': u, 'min': rng.random() < .7, 'ib': rng.choice([0, 1, 2]), 'rb': rng.choice([0, 0, 1]),
         'dir': rng.choice([0, 0, 0, -1, 1]), 'off': rng.choice([2, 2, 1]), 'void': rng.random() < .2, 'acc': rng.random() < .3, 'pts': pts}
    t = ['P%d' % dim, rng.choice([1, 1, 8, 64]), u, int(d['min']), d['ib'], d['rb'], d['dir'], d['off'], int(d['void']), int(d['acc']), rng.choice([0, 0, 1, 2, 3, 4]), len(P)]
    t += sum([c + [r] for c, r in P], []) + [len(pts)] + sum(pts, [])
    return d, ' '.join(map(str, t))


def D0(P, c):
    return all(d2(c, q[0]) > 0 for q in P)


def ring(rng):
    dim, n, r = rng.choice([2, 2, 3]), rng.randint(1, 12), rng.choice([500, 1000, 1500])
    d = {'kind': 'circle', 'dim': dim, 'n': n, 'r': r, 'min': rng.random() < .6, 'off': rng.choice([2, 2, 1]), 'void': rng.random() < .2, 'acc': rng.random() < .3}
    return d, ' '.join(map(str, ['C%d' % dim, r, rng.choice([100, 200]), n, int(d['min']), rng.choice([0, -1, 1]), d['off'], int(d['void']), int(d['acc'])]))


def cube(rng):
    dim = rng.choice([1, 2, 2, 3])
    s = [rng.randint(1, {1: 6, 2: 4, 3: 3}[dim]) for _ in range(dim)]
    n = 1
    for x in s:
        n *= x
    bonds = 2 * sum(n // x * (x - 1) for x in s)
    d = {'kind': 'cube', 'dim': dim, 'n': n, 'bonds': bonds, 'r': rng.choice([500, 1000]), 'k': rng.choice([0, 0, 1, 2, 2, 3, 4, 7]), 'min': False,
         'off': rng.choice([2, 2, 1]), 'void': rng.random() < .2, 'acc': rng.random() < .3}
    return d, ' '.join(map(str, ['Q%d' % dim, d['r'], rng.choice([100, 200])] + s + [d['k'], rng.choice([0, -1, 1]), d['off'], int(d['void']), int(d['acc'])]))


def corrupt(r, rng):
    if 'obs' not in r:
        return None
    o, m = r['obs'], rng.random()
    if m < .3:
        o['lo'][0] += 5
    elif m < .5:
        v = rng.choice(o['v']); v[0] += rng.choice([-30, 30])
    elif m < .7 and len(o['ops']) > 1:
        a = o['ops'][0]
        if not a:
            return None
        o['ops'][1].append(a.pop())
        if r['kind'] == 'cloud' and r['min'] and not o['ops'][0]:
            pass
        o['rmax'] += 1
    else:
        o['np'] += 1
    return r


def check(c):
    for a in c.pick([(2, 3, '1', 8), (5, 2, '2, 3', 8)], [(5, 3, '1, 2', 8), (8, 2, '2, 3, 5', 8), (3, 4, '1', 8)]):
        c.design('ParticlesMC', CFG % a, workers=8, timeout=800)
    exe = c.build('h_init', repo_src='all')
    for dim, n in ((2, c.pick(400, 4000)), (3, c.pick(300, 3000))):
        c.functional('ParticlesCases', exe, [cloud(c.rng, dim) for _ in range(n)], label='particle clouds in %dD' % dim, corrupt=corrupt, nchunks=8)
    c.functional('ParticlesCases', exe, [(ring if k % 2 else cube)(c.rng) for k in range(c.pick(300, 2000))], label='rings and blocks', corrupt=corrupt, nchunks=8)


if __name__ == '__main__':
    vf.main(check, 'C21')

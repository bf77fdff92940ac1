import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = %d
 MaxLen = %d
 W = %d
INVARIANT Convex
INVARIANT Order
INVARIANT Nested
INVARIANT Border
'''


def case(rng):
    kind = rng.choice(['image', 'voronoi'])
    nx, ny = rng.randint(1, 4), rng.randint(1, 3)
    if nx * ny > 9:
        ny = 2
    ox, oy, j = rng.choice([0, 0, -30, 17, -100]), rng.choice([0, 0, -40, 25]), rng.choice([0, 2, 4, 4])
    V = {(i, k): [ox + 20 * i + rng.randint(-j, j), oy + 20 * k + rng.randint(-j, j)] for i in range(nx + 1) for k in range(ny + 1)}
    w, dr = rng.choice([0, 2, 4, 6, 8, 10]), rng.choice([-1, 0, 0, 0, 1])
    cells = [(i, k) for i in range(nx) for k in range(ny)]
    if len(cells) > 3 and rng.random() < .4:
        cells.remove(rng.choice(cells))
    seg = lambda i, k: [(i, k), (i + 1, k), (i + 1, k + 1), (i, k + 1)]
    grains, color, mids = [], [], []
    if kind == 'image':
        used = set()
        for i, k in cells:
            if (i, k) in used:
                continue
            s, m = seg(i, k), (i, k)
            c = (i % 2) + 2 * (k % 2)
            t = rng.random()
            if t < .15:
                s = s[:3] if rng.random() < .5 else s[1:]
            elif t < .3 and (i + 1, k) in cells and (i + 1, k) not in used:
                # two cells side by side, in an order parameter of their own
                s = [(i, k), (i + 1, k), (i + 2, k), (i + 2, k + 1), (i + 1, k + 1), (i, k + 1)]
                used.add((i + 1, k))
                c = 100 + len(grains)
            grains.append([s])
            color.append(c)
            used.add((i, k))
        names = sorted(set(color))
        rng.shuffle(names)
        color = [names.index(c) for c in color]
        z = list(zip(grains, color))
        rng.shuffle(z)
        grains, color = [a for a, _ in z], [b for _, b in z]
    else:
        for i, k in cells:
            far = [g for g in grains if len(g) < 4 and all(max(abs(i - s[0][0]), abs(k - s[0][1])) >= 2 for s in g)]
            if far and rng.random() < .4:
                rng.choice(far).append(seg(i, k))
            else:
                grains.append([seg(i, k)])
    for g in grains:
        for n, s in enumerate(g):
            if rng.random() < .5:
                s = s[::-1]
            r = rng.randint(0, len(s) - 1)
            g[n] = s[r:] + s[:r]
    pts, mid = [], []
    G = [[[V[v] for v in s] for s in g] for g in grains]
    for g in G:
        s = g[0]
        mid.append(len(pts) + 1)
        pts.append([sum(v[0] for v in s) // len(s), sum(v[1] for v in s) // len(s)])
    nm = len(pts)
    for g in G:
        for s in g:
            for n in range(len(s)):
                a, b = s[n - 1], s[n]
                pts.append(a)
                for m in (2, 3, 4, 5, 6, 8):
                    if (b[0] - a[0]) % m == 0 and (b[1] - a[1]) % m == 0:
                        f = rng.randint(1, m - 1)
                        pts.append([a[0] + (b[0] - a[0]) // m * f, a[1] + (b[1] - a[1]) // m * f])
                pts.append([(a[0] + b[0]) // 2 + rng.randint(-w, w), (a[1] + b[1]) // 2 + rng.randint(-w, w)])
    extra = pts[nm:]
    rng.shuffle(extra)
    pts = pts[:nm] + extra[:30] + [[ox + rng.randint(-12, 20 * nx + 12), oy + rng.randint(-12, 20 * ny + 12)] for _ in range(15)]
    d = {'kind': kind, 'w': w, 'dir': dr, 'off': rng.choice([2, 2, 1]), 'void': rng.random() < .2, 'acc': rng.random() < .3, 'grains': G, 'color': color, 'mid': mid, 'pts': pts}
    t = ['I' if kind == 'image' else 'V', rng.choice([1, 1, 10, 7, 64, 1000]), w, dr, d['off'], int(d['void']), int(d['acc'])]
    if kind == 'image':
        t += [len(G)] + color
        for g in G:
            t += [len(g[0])] + sum(g[0], [])
    else:
        names = rng.sample(range(1, 60), len(V))
        num = dict(zip(V, names))
        order = list(V)
        rng.shuffle(order)
        nmax = rng.choice([4, 4, 5, 7])
        gn = rng.sample(range(1, 90), len(grains))
        rows = [(s, gn[k]) for k, g in enumerate(grains) for s in g]
        rng.shuffle(rows)
        t += [len(V), nmax, len(rows)]
        for v in order:
            t += [num[v]] + V[v]
        for n, (s, g) in enumerate(rows):
            t += [n + 1] + [num[v] for v in s] + [0] * (nmax - len(s)) + [g]
    return d, ' '.join(map(str, t + [len(pts)] + sum(pts, [])))


def corrupt(r, rng):
    if 'obs' not in r:
        return None
    o, m = r['obs'], rng.random()
    if m < .3:
        o['hi'][rng.randint(0, 1)] += 1
    elif m < .6:
        v = rng.choice(o['v'])
        v[rng.randint(r['off'], len(v) - 1)] += rng.choice([-9000, 9000])
    elif m < .8:
        o['nops'] += 1
    else:
        o['rmax'] += 2
    return r


def check(c):
    for a in c.pick([(3, 4, 2)], [(4, 4, 4), (3, 6, 4)]):
        c.design('PolygonsMC', CFG % a, workers=8, timeout=800)
    exe = c.build('h_init', repo_src='all')
    c.functional('MicroCases', exe, [case(c.rng) for _ in range(c.pick(600, 6000))], label='contours and Voronoi cells', corrupt=corrupt, nchunks=8)


if __name__ == '__main__':
    vf.main(check, 'C22')

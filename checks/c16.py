import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

MC = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Rep <- %s
 Per = %s
 LMin = %d
 LMax = %d
 L0 = %d
 MaxRounds = %d
INVARIANT Levels
INVARIANT RatioTwo
INVARIANT Tiles
INVARIANT Resolved
'''
VALS = [0, 0, 100, 100, 5, 95, 50, 30, 2, 98, 6, 94, 10, -3, 103]


def gen(rng, dim, big):
    rep = [rng.randint(1, 3 if dim == 2 else 2) for _ in range(dim)]
    per = rng.random() < .2
    if per:
        rep = [max(2, r) for r in rep]
    if dim == 3 and rng.random() < .6:
        rep = [1, 1, 1] if not per else rep
    l0 = rng.choice([0, 1, 1, 2]) if dim == 2 else rng.choice([0, 1])
    if dim == 2 and l0 == 2:
        rep = [min(r, 2) for r in rep]
    nb, nr = rng.randint(1, 4), rng.randint(1, 4 if dim == 2 else 2)
    lmx = rng.choice([l0, l0 + 1, l0 + 1, l0 + 2]) if dim == 2 else rng.choice([1, 2])
    rounds, tok = [], []
    for k in range(nr):
        which = rng.choice([1, 2, 2, 3])
        top, bottom = rng.choice([(0, 0), (0, 0), (0, 0), (0, 30), (30, 0), (30, 30), (60, 30), (0, 90)])
        lmax = max(0, lmx - (rng.random() < .25 and k > 0))
        lmin = rng.randint(0, min(lmax, l0 + 1))
        b0 = rng.randrange(nb)
        b1 = rng.randint(b0 + 1, nb)
        tok += [which, top, bottom, lmin, lmax, b0, b1]
        blocks = []
        for b in range(nb):
            d = rng.choice([0, 0, 0, 100, 2, 50 if rng.random() < .1 else 0])
            boxes = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                lo, hi = [], []
                for e in range(dim):
                    a = rng.randrange(0, 64 * rep[e] + 1)
                    w = rng.choice([0, 4, 16, 32, 64])
                    lo.append(max(0, a - w)); hi.append(min(64 * rep[e], a + w))
                boxes.append(lo + hi + [rng.choice(VALS)])
            tok += [d, len(boxes)] + sum(boxes, [])
        rounds.append(dict(which=which, top=top, bottom=bottom, lmin=lmin, lmax=lmax, b0=b0, b1=b1))
    t = ['A%d' % dim] + rep + [int(per), l0, nb, nr] + tok
    return ({'dim': dim, 'rep': rep, 'per': per, 'nb': nb, 'rounds': rounds}, ' '.join(map(str, t)))


def corrupt(r, rng):
    if 'obs' not in r:
        return None
    k = rng.randrange(len(r['obs']))
    q = r['obs'][k]['post']
    m = rng.random()
    if m < .4 and r['rounds'][k]['which'] != 1:
        p = rng.choice(q['pts']); p[2 + rng.randrange(r['nb'])] += rng.choice([-40, 40])
    elif m < .6:
        q['bad'] += 1
    elif m < .8:
        c = rng.choice(q['cells']); c[0] += 1
    else:
        q['nc'] += 1
    return r


def check(c):
    for name, rep, per, lmin, lmax, l0, n in c.pick(
            [('r11', '<<1, 1>>', False, 0, 2, 1, 3), ('r21', '<<2, 1>>', False, 1, 2, 1, 3), ('r21', '<<2, 1>>', True, 0, 2, 1, 2)],
            [('r11', '<<1, 1>>', False, 0, 3, 1, 4), ('r21', '<<2, 1>>', False, 1, 3, 1, 4), ('r21', '<<2, 1>>', True, 0, 2, 1, 4), ('r22', '<<2, 2>>', True, 0, 2, 0, 4)]):
        mod = '---- MODULE AmrRun ----\nEXTENDS AmrMC\n%s == %s\n====\n' % (name, rep)
        c.design('AmrRun', MC % (name, str(per).upper(), lmin, lmax, l0, n), files={'AmrRun.tla': mod}, workers=8, timeout=800)
    exe = c.build('h_amr')
    for np, dim, n in c.pick([(1, 2, 150), (1, 3, 40), (2, 2, 60), (3, 2, 40), (2, 3, 20)], [(1, 2, 1500), (1, 3, 300), (2, 2, 500), (3, 2, 400), (4, 3, 150)]):
        c.functional('AmrCases', exe, [gen(c.rng, dim, c.thorough) for _ in range(n)], np=np if np > 1 else None,
                     label='adaptation in %dD, %d process(es)' % (dim, np), corrupt=corrupt, nchunks=8)


if __name__ == '__main__':
    vf.main(check, 'C16')

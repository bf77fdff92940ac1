import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf




def primes(s, e, mp, sub):
    return ({'what': 'R', 's': s, 'e': e, 'mp': mp, 'in': sub}, ' '.join(map(str, ['R', s, e, mp, len(sub)] + sub)))


def clog(a, b):
    k = 0
    while b * 2 ** k < a:
        k += 1
    return k


def mesh(rng):
    while True:
        dim = rng.choice([2, 2, 2, 3])
        kind = rng.choice(['I', 'I', 'R', 'R', 'D'])
        lo = [rng.randrange(-5, 5) for _ in range(dim)]
        big = rng.choice([3, 10, 25])
        hi = [x + rng.randrange(1, big) for x in lo]
        w, dpi = rng.choice([1, 2, 4, 6, 8, 16]), rng.choice([2, 3, 4, 6, 8, 12, 16])
        lev0 = rng.choice([1, 2, 2, 3, 4])
        dpe = rng.choice([1, 1, 2, 4])
        r = rng.choice([4, 8, 12, 20, 40])
        mp = rng.choice([0, 0, 2, 3, 5, 7, 20])
        ref = rng.randrange(3)
        sub = [rng.randrange(1, 6) for _ in range(dim)]
        per = rng.random() < .4
        if dpi < lev0:
            continue
        if kind == 'I':
            ni = clog(dpi, lev0)
            n = [-(-(b - a) * dpi * 4 // (dpe * w * 2 ** ni)) for a, b in zip(lo, hi)]
        elif kind == 'R':
            if r * dpi < dpe * w:
                continue
            ni = clog(r * dpi, dpe * w)
            n = [(2 * (b - a) * 4 + r) // (2 * r) for a, b in zip(lo, hi)]
        else:
            ni, n = 0, sub
        if min(n) < 1:
            continue
        tot = 1
        for x in n:
            tot *= max(2, x) * 2
        tot *= 2 ** (dim * (ni if ref == 2 else ref if kind == 'D' else 0))
        if tot > 40000:
            continue
        if kind == 'D' and ref > 2:
            continue
        c = {'what': 'M', 'kind': kind, 'dim': dim, 'lo': lo, 'hi': hi, 'w': w, 'dpi': dpi, 'per': per, 'ref': ref, 'mp': mp,
             'lev0': lev0, 'dpe': dpe, 'r': r, 'sub': sub}
        t = ['M%d' % dim, kind] + lo + hi + [w, dpi, int(per), ref, mp, lev0, dpe, r] + sub
        return c, ' '.join(map(str, t))


def corrupt(r, rng):
    if 'exc' in r:
        return None
    if r['what'] == 'R':
        if not r['sub']:
            return None
        r['sub'][0] += 1
    else:
        k = rng.choice(['del', 'lev', 'vol', 'perf'])
        r[k] += 1
    return r


def check(c):
    exe = c.build('h_misc')
    cs = [primes(0, 40, mp, [n]) for n in range(1, c.pick(120, 600)) for mp in (2, 3, 5, 20)]
    cs += [primes(s, s + c.rng.randrange(0, 60), c.rng.choice([0, 2, 3, 5, 7, 11, 20]), [c.rng.randrange(1, 200) for _ in range(c.rng.choice([1, 2, 3]))])
           for s in (c.rng.randrange(0, 200) for _ in range(c.pick(300, 3000)))]
    c.functional('MeshGen', exe, cs, label='prime decompositions', corrupt=corrupt, nchunks=8)
    # the harness reports its box as lo/hi: rename so that the input survives
    c.functional('MeshGen', exe, [mesh(c.rng) for _ in range(c.pick(500, 6000))], label='meshes', corrupt=corrupt, nchunks=8)
    c.functional('MeshGen', exe, [mesh(c.rng) for _ in range(c.pick(60, 600))], np=3, label='meshes on 3 processes', corrupt=corrupt)


vf.main(check, 'C15')

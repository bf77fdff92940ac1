import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf


def case(n, own, E):
    return ({'kind': 'S', 'n': n, 'e': [list(e) for e in E]},
            ' '.join(map(str, ['S', n] + own + [len(E)] + [x for e in E for x in e])))


def rnd(rng, np):
    n = rng.randrange(0, 12)
    own = sorted(rng.randrange(np) for _ in range(n))
    E = set()
    m = rng.random()
    if n > 1:
        if m < .35:      # a chain in random order: many rounds
            p = list(range(n)); rng.shuffle(p)
            E = {(a, b) if rng.random() < .5 else (b, a) for a, b in zip(p, p[1:]) if rng.random() < .9}
        else:
            for _ in range(rng.randrange(0, 2 * n)):
                a, b = rng.randrange(n), rng.randrange(n)
                E.add((a, b))
                if rng.random() < .6:
                    E.add((b, a))
    return case(n, own, sorted(e for e in E if e[0] != e[1] and own[e[0]] != own[e[1]]))


def corrupt(r, rng):
    v = r['a'] if rng.random() < .5 else r['b']
    if not v:
        return None
    v[rng.randrange(len(v))] += 50
    return r


def check(c):
    exe = c.build('h_misc')
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NeverSelf Sound Complete OneLeader\n%sCONSTANTS N=%d P=%d\n')
    c.design('Stitching', cfg % ('PROPERTIES Terminates\n', 4, 3), workers=8)
    if c.thorough:
        c.design('Stitching', cfg % ('', 5, 3), workers=8, name='Stitching-5', heap='12g', timeout=3000)
    # every graph on four fragments over two or three processes
    small = {2: [], 3: []}
    for np, owns in ((2, ([0, 0, 1, 1], [0, 1, 1, 1], [0, 0, 0, 1])), (3, ([0, 1, 2, 2], [0, 1, 1, 2], [0, 0, 1, 2]))):
        for own in owns:
            P = [(a, b) for a in range(4) for b in range(4) if own[a] != own[b]]
            for m in range(1 << len(P)):
                small[np].append(case(4, own, [p for k, p in enumerate(P) if m >> k & 1]))
        c.rng.shuffle(small[np])
    for np, q, t in ((1, 20, 50), (2, 400, 3000), (3, 500, 5000), (4, 150, 2500), (5, 150, 2500)):
        cs = small.get(np, [])[:c.pick(500, 4000)] + [rnd(c.rng, np) for _ in range(c.pick(q, t))]
        c.functional('StitchingCases', exe, cs, np=np, label='stitching on %d processes' % np, corrupt=corrupt, nchunks=8)


vf.main(check, 'C04')

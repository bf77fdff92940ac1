import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf


def tok(c):
    def gs(L):
        s = [len(L)]
        for g in L:
            s += [g['id'], g['op'], len(g['segs'])]
            for q in g['segs']:
                s += list(q['c']) + [q['r']]
        return s
    return ' '.join(map(str, [c['dim'], c['nops'], c['log']] + gs(c['old']) + gs(c['new'])))


def rnd(rng, thorough):
    dim = rng.choice([2, 2, 3])
    nops = rng.choice([1, 1, 2, 3])
    L = rng.choice([4, 8, 15, 30])
    multi = rng.random() < 0.6
    R = rng.choice([1, 2, 4])

    def seg():
        return {'c': [rng.randrange(L + 1) for _ in range(dim)], 'r': rng.randrange(0 if rng.random() < .1 else 1, R + 1)}

    def grains(n, lo, hi):
        ids = rng.sample(range(lo, hi), n)
        if rng.random() < .7:
            ids.sort()
        return [{'id': i, 'op': rng.randrange(nops),
                 'segs': [seg() for _ in range(rng.randrange(1, 4) if multi else 1)]} for i in ids]
    old = grains(rng.randrange(0, 7), 0, 20)
    mode = rng.random()
    if mode < 0.5:          # moved copies of the old grains, some split, lost, merged
        new = []
        pool = rng.sample(range(0, 30), 14)
        for g in old:
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                segs = [{'c': [x + rng.randrange(-2, 3) for x in s['c']], 'r': max(1, s['r'] + rng.randrange(-1, 2))}
                        for s in g['segs']]
                if len(segs) > 1 and rng.random() < .4:
                    segs = segs[:-1]
                if rng.random() < .4:
                    rng.shuffle(segs)
                if rng.random() < .2:
                    segs.append(seg())
                new.append({'id': pool.pop(), 'op': g['op'], 'segs': segs})
        new.sort(key=lambda g: g['id'])
    else:
        new = grains(rng.randrange(0, 7), 0, 30)
    return {'dim': dim, 'nops': nops, 'log': int(rng.random() < .3), 'old': old, 'new': new}


def corrupt(r, rng):
    k = [i for i, p in enumerate(r['m']) if p[1] >= 0]
    if not k:
        return None
    i = rng.choice(k)
    r['m'][i][1] = rng.choice([-1, 77])
    if r['m'][i][1] == -1:
        # dropping a mapping is wrong unless another grain claims the same one: it was free
        r['m'][i][1] = 77
    return r


def check(c):
    exe = c.build('h_ids', repo_src=False)
    # design: every visiting order of the algorithm yields an acceptable map; all inputs of the
    # small universe are then replayed into the real code
    for ops, pos, nold, nnew, segs in c.pick([('{0}', '0..3', 2, 2, 2), ('{0,1}', '0..3', 2, 2, 1)],
                                             [('{0}', '0..4', 2, 2, 2), ('{0,1}', '0..4', 2, 2, 1), ('{0}', '0..5', 2, 3, 1)]):
        c.design('GrainIds', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Injective SameOp Refines Undisturbed\n'
                 'CONSTANTS\n Pos = {%s}\n Rad = {1}\n NOld = %d\n NNew = %d\n MaxSegs = %d\n Ops = %s\n'
                 % (','.join(str(i) for i in range(int(pos[0]), int(pos[-1]) + 1)), nold, nnew, segs, ops), workers=8)
    # exhaustive small universe through the real code
    small = []
    segs1 = [[{'c': [x, 0], 'r': 1}] for x in range(0, 5)]
    segs2 = [[{'c': [x, 0], 'r': 1}, {'c': [y, 0], 'r': 1}] for x in range(0, 5) for y in range(0, 5) if x != y]
    U = segs1 + segs2
    for a in range(len(U)):
        for b in range(a, len(U)):
            for g in range(len(U)):
                small.append({'dim': 2, 'nops': 1, 'log': 0,
                              'old': [{'id': 3, 'op': 0, 'segs': U[a]}, {'id': 5, 'op': 0, 'segs': U[b]}],
                              'new': [{'id': 0, 'op': 0, 'segs': U[g]}]})
                small.append({'dim': 2, 'nops': 1, 'log': 0,
                              'old': [{'id': 4, 'op': 0, 'segs': U[g]}],
                              'new': [{'id': 0, 'op': 0, 'segs': U[a]}, {'id': 2, 'op': 0, 'segs': U[b]}]})
    if not c.thorough:
        c.rng.shuffle(small)
        small = small[:3000]
    cases = small + [rnd(c.rng, c.thorough) for _ in range(c.pick(3000, 40000))]
    c.functional('GrainIdsCases', exe, [(x, tok(x)) for x in cases], corrupt=corrupt, nchunks=8,
                 label='transfer_grain_ids')
    c.assumptions += ['coordinates and radii are small integers, so distances and their ties are exact in double precision']


vf.main(check, 'C01')

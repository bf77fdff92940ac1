import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Meshes = {%s}
 Procs = %d
 NVec = %d
 Slots = {1, 2}
 Vals = {1, 2}
 MaxLen = %d
INVARIANT Readable
INVARIANT OnlyOnce
'''


def gen(rng, dim, thorough):
    rep = [rng.randint(1, 3 if dim == 2 else 2) for _ in range(dim)]
    per = rng.random() < .2
    if per:
        rep = [max(2, r) for r in rep]
    deg, nb = rng.choice([1, 1, 2]), rng.randint(1, 3)
    if dim == 3:
        deg = 1
    ops = [['refine', rng.randrange(1000), 100, 0]] + [['refine', rng.randrange(1000), rng.choice([20, 50]), 0] for _ in range(rng.choice([0, 1, 2 if dim == 2 else 1]))]
    cur, slots, fresh = (deg, nb), {}, False
    for k in range(rng.choice([4, 6, 9])):
        m = rng.random()
        if m < .15:
            ops.append(['refine', rng.randrange(1000), rng.choice([10, 30]) if dim == 2 else 10, rng.choice([0, 60, 90])]); fresh = True
        elif m < .3:
            cur = (rng.choice([1, 2]) if dim == 2 else 1, rng.randint(1, 3)); ops.append(['space', cur[0], cur[1], rng.choice([0, 1, 2])]); fresh = True
        elif m < .6 or fresh:
            ops.append(['set', rng.randrange(-5000, 5000), 0, 0]); fresh = False
            s = rng.randint(1, 3); ops.append(['save', s, rng.choice([0, 1, 2]), rng.choice([0, 1])]); slots[s] = cur
        elif slots:
            s = rng.choice(sorted(slots))
            if slots[s] != cur:
                cur = slots[s]; ops.append(['space', cur[0], cur[1], 0])
            ops.append(['load', s, 0, rng.choice([0, 0, 1, 2])])
    ops += [['set', rng.randrange(-5000, 5000), 0, 0], ['save', 1, 0, 0], ['load', 1, 0, 1]]
    t = [dim] + rep + [int(per), deg, nb, len(ops)] + sum(ops, [])
    return ({'dim': dim, 'ops': ops}, ' '.join(map(str, t)))


def corrupt(r, rng):
    L = [i for i, o in enumerate(r['ops']) if o[0] == 'load']
    o = r['obs'][rng.choice(L)]
    p = rng.choice(o['s']['pts'])
    if rng.random() < .7:
        p[-1] += 1
    else:
        o['s']['cells'] += 1
    return r


def check(c):
    for m, p, v, n in c.pick([('3', 2, 1, 4), ('2, 3', 2, 1, 4)], [('2, 3', 2, 2, 4), ('3', 3, 1, 6), ('4', 3, 1, 4)]):
        c.design('Serialization', CFG % (m, p, v, n), workers=8, timeout=800)
    exe = c.build('h_ser')
    for np, dim, n in c.pick([(1, 2, 60), (2, 2, 100), (3, 2, 100), (4, 3, 40)], [(1, 2, 500), (2, 2, 900), (3, 2, 900), (5, 2, 400), (2, 3, 200), (4, 3, 300)]):
        c.functional('SerializationCases', exe, [gen(c.rng, dim, c.thorough) for _ in range(n)], np=np if np > 1 else None,
                     label='saving and loading in %dD, %d process(es)' % (dim, np), corrupt=corrupt, nchunks=8)


if __name__ == '__main__':
    vf.main(check, 'C18')

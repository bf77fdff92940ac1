import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

MOD = '''---- MODULE GrainStoreRun ----
EXTENDS GrainStore
PosC == %s
RadC == %s
====
'''
CFG = '''SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 NG = %d
 Dim = %d
 MaxLen = %d
 Simulate = %s
 Kinds = {%s}
 Pos <- PosC
 Rad <- RadC
INVARIANT Aggregates
'''
LINE2 = '{<<5 * i, 20, 0>> : i \\in 0..8} \\cup {<<20, 5 * i, 0>> : i \\in 0..8} \\cup {<<7 * i, 4 * i, 0>> : i \\in 0..5}'
LINE3 = '{<<5 * i, 20, 10>> : i \\in 0..8} \\cup {<<20, 5 * i, 10>> : i \\in 0..8} \\cup {<<20, 20, 5 * i>> : i \\in 0..8} \\cup {<<3 * i, 4 * i, 7 * i>> : i \\in 0..5}'


def histories(c, dim, ng, num, n, kinds, name):
    r = c.tlc('GrainStoreRun', CFG % (ng, dim, n, 'TRUE', kinds) + 'INVARIANT Done\n',
              files={'GrainStoreRun.tla': MOD % ((LINE2, LINE3)[dim - 2], '1..6')}, simulate=num, depth=n + 2, name='GrainStore-' + name, workers=1)
    return [(dim, ng, h) for h in {str(h): h for h in c.printed(r, 'HIST')}.values()]


def case(x):
    dim, ng, h = x
    t = [dim, ng, len(h)]
    for o in h:
        if o[0] == 'seg':
            s = o[2]
            t += ['seg', o[1], s['k']] + s['c'] + [s['r'], s['m'], s['v'], len(s['d'])] + s['d']
        else:
            t += o
    return ({'dim': dim, 'n': ng, 'ops': h}, ' '.join(map(str, t)))


def corrupt(r, rng):
    k = rng.randrange(len(r['obs']))
    o = r['obs'][k]
    g = rng.choice(o['g'])
    m = rng.random()
    loads = [i for i, q in enumerate(r['ops']) if q[0] == 'load']
    if m < .3 and loads:
        r['obs'][rng.choice(loads)]['exact'] = '0'
    elif m < .5 and g['segs']:
        rng.choice(g['segs'])[rng.choice(['r', 'm', 'v'])] += 1
    elif m < .7:
        g[rng.choice(['id', 'op', 'old', 'dyn', 'ns'])] += 1
    elif m < .85:
        g['maxr'] += 100
    else:
        g['buf'] -= 50
    return r


def check(c):
    c.design('GrainStoreRun', CFG % (2, 2, c.pick(4, 5), 'FALSE', '0, 1') + 'INVARIANT Symmetric\nINVARIANT LowerBound\nPROPERTY Restored\nPROPERTY Undisturbed\n',
             files={'GrainStoreRun.tla': MOD % ('{<<0, 0, 0>>, <<3, 4, 0>>}', '{1, 2}')}, workers=8, timeout=800)
    exe = c.build('h_grain')
    H = []
    for dim in (2, 3):
        for kinds in ('1', '2', '3', '0, 1, 2, 3'):
            H += histories(c, dim, 3, c.pick(110, 1200), 16, kinds, '%d-%s' % (dim, kinds[:1]))
        H += histories(c, dim, 4, c.pick(30, 300), 40, '0, 1, 2, 3', 'long%d' % dim)
    c.cov['model_behaviours'] = len(H)
    if len(H) < 500:
        raise vf.MachineryError('too few behaviours generated')
    for dim in (2, 3):
        c.functional('GrainStoreCases', exe, [case(h) for h in H if h[0] == dim], label='grains in %dD written, read, copied and compared' % dim,
                     consts='CONSTANT Dim = %d\n' % dim, corrupt=corrupt, nchunks=8, timeout=600)


if __name__ == '__main__':
    vf.main(check, 'C17')

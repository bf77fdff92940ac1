import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Ks = {%s}
 MaxB = %d
 BS = %d
 Bound = %d
 MaxLen = %d
 Simulate = %s
 Kinds = {%s}
INVARIANT Ordered
'''
KINDS = ('cur old all commit step recent rollback getrecent apply blockwise raw ptr resize ghost unghost flat count extra').split()


def cfg(ks, maxb, bs, bound, n, sim, kinds):
    s = CFG % (ks, maxb, bs, bound, n, str(sim).upper(), ', '.join('"%s"' % k for k in kinds))
    return s + ('INVARIANT Done\n' if sim else 'PROPERTY LengthKept\nPROPERTY Exactly\n')


def histories(c, num, n, name, kinds=KINDS):
    r = c.tlc('History', cfg('2, 3, 4, 5', 3, 5, 1000, n, True, kinds), simulate=num, depth=n + 2, name='History-' + name, workers=1)
    return list({str(h): h for h in c.printed(r, 'HIST')}.values())


def case(h):
    return ({'ops': h}, ' '.join(['H', str(len(h))] + [str(x) for o in h for x in o]))


def corrupt(r, rng):
    o = rng.choice(r['obs'][1:])
    v = rng.choice(o['v'])
    if rng.random() < .5:
        v['b'][0][0] += 1
    else:
        o['ret'] = o['ret'] + [[1]]
    return r


def check(c):
    c.design('History', cfg('2, 3, 4', 2, 1, 6, c.pick(5, 6), False, ['cur', 'step', 'rollback', 'ghost', 'flat', 'apply', 'resize', 'commit']), workers=8, timeout=800)
    exe = c.build('h_vec')
    H = histories(c, c.pick(700, 6000), 14, 'sim')
    H += histories(c, c.pick(60, 400), 40, 'long')
    H += histories(c, c.pick(200, 2000), 16, 'steps', ['cur', 'step', 'rollback', 'extra', 'flat', 'resize', 'getrecent'])
    c.cov['model_behaviours'] = len(H)
    if len(H) < 500:
        raise vf.MachineryError('too few behaviours generated')
    cs = [case(h) for h in H]
    for np in (1, 2, 3):
        c.functional('HistoryCases', exe, cs[np - 1::3], np=np, label='solution histories on %d processes' % np, corrupt=corrupt, nchunks=8, timeout=600)


vf.main(check, 'C09')

import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
VIEW View
CONSTANTS
 NV = %d
 MaxB = %d
 Sizes = {%s}
 Facs5 = {%s}
 Bound = %d
 MaxLen = %d
 Simulate = %s
 Kinds = {%s}
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
'''
KINDS = ('new fill resize like likeset assign equ copy moveassign movector iter view cview move remove insert give swap '
         'addc setc mul half add add2 sadd sadd2 scale plus minus own adddot write ghost unghost').split()


def cfg(nv, maxb, sizes, facs, bound, maxlen, sim, kinds):
    s = CFG % (nv, maxb, sizes, facs, bound, maxlen, str(sim).upper(), ', '.join('"%s"' % k for k in kinds))
    return s + ('INVARIANT Done\n' if sim else 'PROPERTY Frame\nPROPERTY Rearrange\nPROPERTY Copies\nPROPERTY Views\n')


def histories(c, num, depth, name):
    r = c.tlc('BlockVector', cfg(3, 3, '4, 6', '3, 5, 6, 8', 300, depth, True, KINDS), simulate=num, depth=depth + 2,
              name='BlockVector-' + name, workers=1)
    seen = {}
    for h in c.printed(r, 'HIST'):
        seen[str(h[:-1])] = h  # one of the many last operations
    return list(seen.values())


def case(h):
    return ({'ops': h}, ' '.join(['V', str(len(h))] + [str(x) for o in h for x in o]))


def corrupt(r, rng):
    o = rng.choice(r['obs'])
    v = rng.choice(o['v'])
    k = rng.choice(['size', 'l1', 'l2', 'linf', 'mean', 'b', 'zero'])
    if k == 'b':
        v['b'] = v['b'] + [[1]]
    elif k == 'zero':
        v['zero'] = not v['zero']
    else:
        v[k] += 1
    return r


def check(c):
    c.design('BlockVector', cfg(2, 2, '1', '7', 30, c.pick(4, 5), False, [k for k in KINDS if k not in ('half', 'sadd2', 'add2')]), workers=8, timeout=800)
    exe = c.build('h_vec')
    H = histories(c, c.pick(900, 9000), 14, 'sim')
    H += histories(c, c.pick(60, 500), 60, 'long')
    c.cov['model_behaviours'] = len(H)
    if len(H) < 300:
        raise vf.MachineryError('too few behaviours generated')
    cs = [case(h) for h in H]
    k = len(cs) // 3
    for np, part in ((1, cs[:k]), (2, cs[k:2 * k]), (3, cs[2 * k:])):
        c.functional('BlockVectorCases', exe, part, np=np, label='block vectors on %d processes' % np, corrupt=corrupt, nchunks=8, timeout=600)


vf.main(check, 'C08')

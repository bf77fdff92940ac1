import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Dts = {%s}
 NObj = %d
 MaxLen = %d
 Simulate = %s
 Kinds = {%s}
INVARIANT AllValid
INVARIANT Highest
INVARIANT Exact
'''
KINDS = 'make update replace copy assign rescheme restore copydt load time advance'.split()


def cfg(dts, no, n, sim, kinds):
    return CFG % (dts, no, n, str(sim).upper(), ', '.join('"%s"' % k for k in kinds)) + ('INVARIANT Done\n' if sim else '')


def histories(c, num, n, name, kinds=KINDS):
    r = c.tlc('TimeScheme', cfg('1, 2, 3, 4', 3, n, True, kinds), simulate=num, depth=n + 2, name='TimeScheme-' + name, workers=1)
    return list({str(h): h for h in c.printed(r, 'HIST')}.values())


def case(h):
    return ({'ops': h}, ' '.join(['D', str(len(h))] + [str(x) for o in h for x in o]))


def corrupt(r, rng):
    o = rng.choice(rng.choice(r['obs']))
    k = rng.choice(['cur', 't', 'd', 'w'] if o['k'] else ['cur', 't', 'd'])
    if k in ('cur', 't'):
        o[k] += 1
    else:
        o[k][rng.randrange(len(o[k]))] += 7
    return r


def check(c):
    c.design('TimeScheme', cfg('1, 2, 3', 1, c.pick(7, 9), False, ['make', 'update', 'replace', 'rescheme']), workers=8, timeout=800)
    c.design('TimeScheme', cfg('1, 3', 2, c.pick(5, 6), False, [k for k in KINDS if k not in ('time', 'advance')]), workers=8, timeout=800, name='TimeScheme-2')
    exe = c.build('h_vec')
    H = histories(c, c.pick(1500, 15000), 18, 'sim')
    H += histories(c, c.pick(500, 5000), 18, 'steps', ['update', 'replace', 'rescheme', 'restore', 'load'])
    H += histories(c, c.pick(50, 500), 80, 'long')
    # every sequence of step sizes and retries for every order
    for k in (1, 2, 3):
        for d in itertools.product((1, 2, 3), repeat=4):
            H.append([['make', 1, k, d[0]], ['update', 1, d[1]], ['update', 1, 4], ['replace', 1, d[2]], ['update', 1, d[3]], ['update', 1, d[0]]])
    c.cov['model_behaviours'] = len(H)
    if len(H) < 1000:
        raise vf.MachineryError('too few behaviours generated')
    c.functional('TimeSchemeCases', exe, [case(h) for h in H], label='multistep schemes', corrupt=corrupt, nchunks=8, timeout=600)
    c.functional('TimeSchemeCases', exe, [({'name': n}, 'E ' + n) for n in ('RK4', 'FE')], label='explicit schemes', nchunks=1)


vf.main(check, 'C10')

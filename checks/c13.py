import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

CFG = '''SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Cfgs <- AllCfgs
 Wide = %s
 Norms %s
 Lins = {%s}
 MaxCalls = %d
 MaxSolves = %d
 Simulate = %s
INVARIANT Truthful
INVARIANT PreFresh
'''


def cfg(wide, norms, lins, nc, ns, sim):
    return CFG % (str(wide).upper(), norms, lins, nc, ns, str(sim).upper()) + ('INVARIANT Done\n' if sim else 'PROPERTY Descends\nPROPERTY BestIterate\nPROPERTY PreAfterLong\n')


KEYS = 'max abs rel damp upd pre tn tl reuse cb'.split()


def case(c, log):
    ops = []
    for e in log:
        if e[0] == 'a':
            ops[-1].append(e[1])
        else:
            ops.append([e[0]])
    t = ['N'] + [int(c[k]) for k in KEYS] + [len(ops)]
    for o in ops:
        t += [o[0]] if o[0] == 'clear' else ['solve', len(o) - 1] + o[1:]
    return ({'c': {k: (bool(c[k]) if k in ('damp', 'upd', 'pre', 'reuse', 'cb') else c[k]) for k in KEYS}, 'ops': ops}, ' '.join(map(str, t)))


def rnd(rng):
    """Sessions in which residuals mostly go down, so that solves are long."""
    c = dict(max=rng.choice([0, 1, 2, 5, 12, 20]), abs=rng.choice([0, 1, 3]), rel=rng.choice([0, 1, 10, 512, 1024]), damp=rng.random() < .6,
             upd=rng.random() < .8, pre=rng.random() < .8, tn=rng.choice([1, 2, 3, 4, 10]), tl=rng.choice([2, 5]), reuse=rng.random() < .7, cb=rng.random() < .3)
    return c


def script(c, rng):
    """One solve: simulate which call comes next just well enough to give sensible answers."""
    a, it = [], 0
    n = rng.choice([99, 999, 9999])
    a.append(n)
    style = rng.choice(['good', 'bad', 'mixed', 'stuck', 'nan'])
    while it < 25:
        if c['cb']:
            a.append(rng.choice([1, 1, 1, 0, 2]))
        a.append(0)                                   # Jacobian (and perhaps preconditioner)
        if rng.random() < .5:
            a.append(0)
        a.append(rng.choice([0, 1, 2, 3, 5, 6, 9]) if rng.random() < .97 else -1)
        if style == 'stuck' and it > 1:
            a += [n + 2] * 110
        for _ in range(rng.choice([0, 0, 1, 3, 8]) if style != 'good' else 0):
            a.append(n + rng.choice([0, 1, 100]) if n > 0 else 1)
        n = (n * rng.choice([1, 2, 5, 9]) // 10) | 1 if style != 'bad' else n
        a.append(n if style != 'nan' or rng.random() < .8 else -2)
        it += 1
    return a


def check(c):
    c.design('NewtonMC', cfg(False, '= {0, 1, 7}', '1, 3', c.pick(14, 20), 1, False), workers=8, timeout=850, heap='12g')
    c.design('NewtonMC', cfg(False, '= {0, 7}', '1, 3', c.pick(9, 12), 2, False), workers=8, timeout=850, name='NewtonMC-2', heap='12g')
    exe = c.build('h_newton')
    r = c.tlc('NewtonMC', cfg(True, '= {0, 1, 3, 9, 27, 99, 333, 999}', '0, 1, 2, 3, 5, 6', 60, 4, True), simulate=c.pick(3000, 30000), depth=300, name='NewtonMC-sim', workers=1)
    H = {str(h): h for h in c.printed(r, 'HIST')}
    cs = [case(h['c'], h['log']) for h in H.values()]
    for _ in range(c.pick(2000, 20000)):
        k = rnd(c.rng)
        log = []
        for _ in range(c.rng.randrange(1, 5)):
            if c.rng.random() < .2:
                log.append(['clear'])
            log += [['solve']] + [['a', x] for x in script(k, c.rng)]
        cs.append(case(k, log))
    c.cov['model_behaviours'] = len(H)
    if len(H) < 1000:
        raise vf.MachineryError('too few behaviours generated')
    c.functional('NewtonCases', exe, cs, label='Newton solver', corrupt=corrupt, nchunks=8, timeout=600)


def corrupt(r, rng):
    o = rng.choice([o for o in r['obs'] if o['do'] == 'solve'])
    k = rng.choice(['res', 'x', 'it', 'lin'])
    if k == 'res':
        o['res'] = 'newton' if o['res'] == 'ok' else 'ok'
    elif k == 'x':
        o['x'] = o['x'] + [1]
    else:
        o[k] += 1
    return r


vf.main(check, 'C13')
